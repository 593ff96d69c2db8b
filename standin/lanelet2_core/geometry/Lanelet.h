#include <lanelet2_core/Forward.h>
