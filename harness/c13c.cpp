// Part of c13.cpp: the histories of these
#define PBT_NO_MAIN
#include	"c12.cpp"
#include	"c22.cpp"
#include	"c23.cpp"
#include	"c24.cpp"
#include	"c25.cpp"
pbt::Property part_c12() { return c12::prop(); }
pbt::Property part_c22() { return c22::prop(); }
pbt::Property part_c23() { return c23::prop(); }
pbt::Property part_c24() { return c24::prop(); }
pbt::Property part_c25() { return c25::prop(); }
