#pragma once
#define YACL_COMP_SECURITY 128
namespace yacl { enum class SecParam { C, S }; }
#define YACL_MODULE_SECPARAM_C_UINT(...) 128
#define YACL_MODULE_SECPARAM_S_UINT(...) 40
