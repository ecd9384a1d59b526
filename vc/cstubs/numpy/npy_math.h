#include <numpy/arrayobject.h>
