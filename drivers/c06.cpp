#define KLV_OWN_SEGMENTS
#include "c05.cpp"
