#include <tf2/LinearMath/Quaternion.h>
