// The hand-written calls of calls.hpp.  args: seed trials hostile
#define EXTRA
#include "calls.hpp"
int main(int argc, char** argv) { return drive<>(argc, argv); }
