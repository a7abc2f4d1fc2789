#ifndef SHIM_SM_NULL_DELETER
#define SHIM_SM_NULL_DELETER
namespace sm { struct null_deleter { void operator()(const void*) const {} }; }
#endif
