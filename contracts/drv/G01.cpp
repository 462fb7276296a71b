// pulls in the inline functions of arrays used by rectangles
#include <pdfmm/pdfmm.h>
