// Part of c13.cpp: the histories of these
#define PBT_NO_MAIN
#include	"c16.cpp"
#include	"c17.cpp"
pbt::Property part_c16() { return c16::property(); }
pbt::Property part_c17() { return c17::property(); }
