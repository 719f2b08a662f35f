#pragma once
#include <impl/util.h>
