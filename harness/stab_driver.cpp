// The stability region program of the library, as it is.
#include <fstream>
#include "stability_region/main.cpp"
