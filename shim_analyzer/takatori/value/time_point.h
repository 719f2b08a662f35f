#pragma once
#include <impl/values.h>
