// Witness unit of checks/U01.py: the analysed code is the implementation file itself.
#include "arolla/util/threading.cc"
