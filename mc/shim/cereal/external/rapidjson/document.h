// The library looks for the copy of rapidjson of an old cereal.
#include "put_unsafe.h"
#include <rapidjson/document.h>
