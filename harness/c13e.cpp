// Part of c13.cpp: the histories of these
#define PBT_NO_MAIN
#include	"c18.cpp"
#include	"c20.cpp"
#include	"c21.cpp"
pbt::Property part_c18() { return c18::property(); }
pbt::Property part_c20() { return c20::property(); }
pbt::Property part_c21() { return c21::property(); }
