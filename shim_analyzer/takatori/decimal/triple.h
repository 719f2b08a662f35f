#pragma once
#include <impl/decimal.h>
