// What the dialects and conversions use of newer MLIR releases, see also shim/.
#ifndef VF_BMSHIM_H
#define VF_BMSHIM_H
#include "mlir/Interfaces/CallInterfaces.h"
#include "mlir/Interfaces/FunctionImplementation.h"
namespace mlir::call_interface_impl {
using function_interface_impl::addArgAndResultAttrs;
}
#endif
