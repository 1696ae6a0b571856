#include "typed_leaf.cpp"
