"""Set-up shared by the stream filter contracts."""
from engine.api import *
def filt_setup(u, cls, prefix=""):
    e = u.engine(prefix)
    st = State(e)
    this = st.new_obj("this", cls)
    out = new_stream(st, "out"); st.setfld(this, "mm::PdfFilter", "m_OutputStream", out)
    if u.bounded: st.ghost[("out", out.rid)] = NIL
    return e, st, this, out
def inbuf(st, name="buf"):
    n = z3.BitVec("n", 64); st.assume(z3.ULE(n, BV(1 << 40, 64)))
    buf, arr = st.buffer(name, n)
    return n, buf, arr
