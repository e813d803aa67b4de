#define KLV_KEYS_ONLY
#include "c08.cpp"
