use crate::shim::*;
use crate::shim::lsp_types::{self, CodeActionResponse, DocumentChange, ResourceOperationKind};
use crate::shim::stdx;
use crate::assists::{Assist, AssistId, AssistKind, AssistResolveStrategy, SingleResolve};
use crate::source_change::SourceChange;
use crate::{lsp_ext, to_proto, try_default};
