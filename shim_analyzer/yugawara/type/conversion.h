#pragma once
#include "../../impl/typing.h"
