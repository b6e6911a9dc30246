// replay of V12: the indexes and the index repository under a random history
#include "ixrepo.hpp"
int main(int argc, char **argv) { return ixmain(argc, argv, false, true); }
