#include "put_unsafe.h"
#include <rapidjson/prettywriter.h>
