// The known finding of C14: a MultiGP over sparsified models which went over their limit.
#include "common.hpp"
#include <limbo/limbo.hpp>
#include <limbo/model/multi_gp.hpp>
#include <limbo/model/sparsified_gp.hpp>
using namespace limbo;
struct Params {
    struct kernel : defaults::kernel {
    };
    struct kernel_exp : defaults::kernel_exp {
    };
    struct model_sparse_gp {
        BO_PARAM(int, max_points, 4);
    };
};
int main()
{
    mbv::J("new").emit();
    model::MultiGP<Params, model::SparsifiedGP, kernel::Exp<Params>, mean::NullFunction<Params>> g;
    for (int i = 0; i < 6; i++)
        g.add_sample(tools::make_vector(0.15 * i), Eigen::Vector2d(i, -i));
    g.recompute();
    mbv::J("sparse").i("samples", g.samples().size()).i("observations", g.observations().size()).i("n", g.nb_samples()).emit();
}
