#include <libsbp/_libsbp.h>
