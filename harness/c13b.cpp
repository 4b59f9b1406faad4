// Part of c13.cpp: the histories of these
#define PBT_NO_MAIN
#include	"c08.cpp"
#include	"c09.cpp"
#include	"c10.cpp"
#include	"c11.cpp"
pbt::Property part_c08() { return c08::prop(); }
pbt::Property part_c09() { return c09::prop(); }
pbt::Property part_c10() { return c10::prop(); }
pbt::Property part_c11() { return c11::prop(); }
