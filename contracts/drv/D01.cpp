// instantiates the class templates of the in-memory devices; no code of its own is verified
#include <pdfmm/pdfmm.h>
#include <pdfmm/base/PdfStreamDevice.h>
template class mm::ContainerStreamDevice<std::string>;
template class mm::ContainerStreamDevice<std::vector<char>>;
template class mm::ContainerStreamDevice<mm::charbuff>;
