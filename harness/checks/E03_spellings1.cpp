// PBT flags: -DPART=1
#include "E03_body.hpp"
