// Part of c13.cpp: the histories of these
#define PBT_NO_MAIN
#include	"c01.cpp"
#include	"c02.cpp"
#include	"c06.cpp"
#include	"c07.cpp"
pbt::Property part_c01() { return c01::prop(); }
pbt::Property part_c02() { return c02::prop(); }
pbt::Property part_c06() { return c06::prop(); }
pbt::Property part_c07() { return c07::prop(); }
