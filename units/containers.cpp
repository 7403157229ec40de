// Explicit instantiations of the container templates of /repo, so that every member
// function of every data layout is type-checked and analysed (including the ones no
// in-tree caller happens to use).
#include "DNDS/Array.hpp"
#include "DNDS/ArrayTransformer.hpp"
#include "DNDS/ArrayPair.hpp"
#include "DNDS/ArrayDerived/ArrayAdjacency.hpp"
#include "DNDS/ArrayDerived/ArrayEigenVector.hpp"
#include "DNDS/ArrayDerived/ArrayEigenMatirx.hpp"
#include "DNDS/ArrayDerived/ArrayEigenMatrixBatch.hpp"
#include "DNDS/ArrayDerived/ArrayEigenUniMatrixBatch.hpp"
#include "DNDS/ObjectPool.hpp"
#include "Solver/ODE.hpp"
#include "Solver/Linear.hpp"

namespace DNDS
{
#define DNDSX_LAYOUT(T, rs, rm)              \
    template class Array<T, rs, rm>;         \
    template class ParArray<T, rs, rm>;      \
    template class ArrayTransformer<T, rs, rm>;
    DNDSX_LAYOUT(real, 4, 4)
    DNDSX_LAYOUT(real, DynamicSize, DynamicSize)
    DNDSX_LAYOUT(real, NonUniformSize, 4)
    DNDSX_LAYOUT(real, NonUniformSize, DynamicSize)
    DNDSX_LAYOUT(real, NonUniformSize, NonUniformSize)
    DNDSX_LAYOUT(index, NonUniformSize, NonUniformSize)

    template class ArrayEigenVector<4>;
    template class ArrayEigenVector<DynamicSize>;
    template class ArrayEigenMatrix<NonUniformSize, NonUniformSize>;
    template class ArrayEigenMatrix<DynamicSize, 5>;
    template class ArrayEigenMatrix<3, 3>;
    template class ArrayEigenUniMatrixBatch<2, 3>;
    template class ArrayEigenUniMatrixBatch<DynamicSize, DynamicSize>;
    template struct ArrayPair<ParArray<real, 1>>;
    template struct ArrayPair<ArrayAdjacency<NonUniformSize>>;
    template struct ArrayPair<ArrayEigenVector<4>>;
    template class ObjectPool<std::vector<real>>;
}
