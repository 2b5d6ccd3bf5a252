#pragma once
#define QI_LIB_API(x)
