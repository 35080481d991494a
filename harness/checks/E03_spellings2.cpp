// PBT flags: -DPART=2
#include "E03_body.hpp"
