// The application as it is, built by the checks (include/.. is the
// repository).
#include <../applications/dumpmt.cpp>
