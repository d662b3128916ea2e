// Copyright © Aptos Foundation
// SPDX-License-Identifier: Apache-2.0

// This file contains code originally from rust-analyzer, licensed under Apache License 2.0.
// Modifications have been made to the original code.

use crate::syntax_editor::Element;

mod items_owner;
mod module;
mod path;
mod use_speck;
mod use_stmt;
