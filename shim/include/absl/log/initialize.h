#ifndef VERIF_SHIM_ABSL_LOG_INIT_H_
#define VERIF_SHIM_ABSL_LOG_INIT_H_
namespace absl { inline void InitializeLog() {} }
#endif
