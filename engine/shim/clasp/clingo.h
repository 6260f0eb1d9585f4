#include <clasp/clasp_facade.h>
