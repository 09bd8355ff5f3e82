// Stand-in: the same text format as the other checkpoint stand-in, after a header.
#ifndef VERIF_SHIM_TFF_FC_CHECKPOINT_BUILDER_H_
#define VERIF_SHIM_TFF_FC_CHECKPOINT_BUILDER_H_
#include <memory>
#include <string>

#include "tensorflow_federated/cc/core/impl/aggregation/protocol/checkpoint_builder.h"
namespace tensorflow_federated {
namespace aggregation {
class FederatedComputeCheckpointBuilderFactory : public CheckpointBuilderFactory {
 public:
  std::unique_ptr<CheckpointBuilder> Create() const override {
    class B : public CheckpointBuilder {
     public:
      absl::Status Add(const std::string& name, const Tensor& t) override {
        absl::StrAppend(&out_, name, "\n", t.Text());
        return absl::OkStatus();
      }
      absl::StatusOr<absl::Cord> Build() override { return absl::Cord(out_); }

     private:
      std::string out_ = "FCv1\n";
    };
    return std::make_unique<B>();
  }
};
}  // namespace aggregation
}  // namespace tensorflow_federated
#endif
