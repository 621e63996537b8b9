#include <swiftnav/_swiftnav.h>
