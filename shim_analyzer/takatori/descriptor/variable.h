#pragma once
#include <impl/descriptors.h>
