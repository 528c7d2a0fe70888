// Instantiates the header templates of gegelati so that their bodies are
// analysed in resolved form. Never linked nor run.
#include <gegelati.h>
#include "data/primitiveTypeArray2D.h"
#include "data/array2DWrapper.h"
#include "data/pointerWrapper.h"
#include "data/constantHandler.h"
#include "learn/classificationLearningAgent.h"
#include "learn/learningAgent.h"
#include "learn/parallelLearningAgent.h"
#include "instructions/lambdaInstruction.h"
#include "instructions/multByConstant.h"
#include "instructions/addPrimitiveType.h"
#include "mutator/rng.h"

template class Data::ArrayWrapper<double>;
template class Data::Array2DWrapper<double>;
template class Data::PointerWrapper<double>;
template class Data::PrimitiveTypeArray<double>;
template class Data::PrimitiveTypeArray2D<double>;
template class Data::ArrayWrapper<int>;
template class Data::PrimitiveTypeArray<int>;
template class Learn::ClassificationLearningAgent<Learn::LearningAgent>;
template class Learn::ClassificationLearningAgent<Learn::ParallelLearningAgent>;
template class Instructions::AddPrimitiveType<double>;
template class Instructions::MultByConstant<double>;
template class Instructions::LambdaInstruction<double, double>;
template class Instructions::LambdaInstruction<const double[2], Data::Constant>;
template class Instructions::LambdaInstruction<const double[2][3], double>;

static double gegex_use(std::vector<std::reference_wrapper<const Data::DataHandler>>& v,
                        Data::PrimitiveTypeArray<double>& a, std::mt19937_64& e)
{
    Instructions::LambdaInstruction<double, double> li(
        [](double x, double y) { return x + y; });
    Instructions::LambdaInstruction<const double[2]> l2(
        [](const double x[2]) { return x[0] + x[1]; });
    return li.execute({}) + l2.execute({});
}
static auto gegex_keep = &gegex_use;
