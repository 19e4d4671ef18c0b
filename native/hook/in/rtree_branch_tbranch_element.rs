use super::*;
pub(crate) fn mk(class_name: &str, branch: TBranch) -> TBranchElement { TBranchElement::new(class_name.to_string(), branch) }
