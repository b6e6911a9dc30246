// replay of V16: filtered and type-set iterators over the indexes of a random history
#include "ixrepo.hpp"
int main(int argc, char **argv) { return ixmain(argc, argv, true, false); }
