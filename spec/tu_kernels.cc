// Instantiates the header-only kernels so that their bodies can be extracted.
#include <deal.II/base/point.h>
#include <deal.II/base/tensor.h>
using namespace dealii;
#include "laplace_kernel.h"
namespace LaplaceKernel
{
  template double       single_layer<2>(const Point<2> &);
  template double       single_layer<3>(const Point<3> &);
  template Point<2>     double_layer<2>(const Point<2> &);
  template Point<3>     double_layer<3>(const Point<3> &);
  template Tensor<2, 2> hypersingular<2>(const Point<2> &);
  template Tensor<2, 3> hypersingular<3>(const Point<3> &);
  template void kernels<2>(const Tensor<1, 2> &, Tensor<1, 2> &, double &);
  template void kernels<3>(const Tensor<1, 3> &, Tensor<1, 3> &, double &);
  template void kernels<2>(const Tensor<1, 2> &, Tensor<2, 2> &, Tensor<1, 2> &, double &);
  template void kernels<3>(const Tensor<1, 3> &, Tensor<2, 3> &, Tensor<1, 3> &, double &);
} // namespace LaplaceKernel
