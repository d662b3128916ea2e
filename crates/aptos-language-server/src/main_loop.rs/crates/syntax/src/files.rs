// Copyright © Aptos Foundation
// SPDX-License-Identifier: Apache-2.0

// This file contains code originally from rust-analyzer, licensed under Apache License 2.0.
// Modifications have been made to the original code.

use crate::ast::node_ext::syntax_element::SyntaxElementExt;
use crate::ast::node_ext::syntax_node::SyntaxNodeExt;
use crate::parse::SyntaxKind;
use crate::{AstNode, SyntaxNode, TextRange, TextSize};
use std::borrow::Borrow;
use vfs::FileId;

#[derive(Debug, PartialEq, Eq, Clone, Copy, Hash)]
pub struct FilePosition {
    pub file_id: FileId,
    pub offset: TextSize,
}

#[derive(Debug, PartialEq, Eq, Clone, Copy, Hash)]
pub struct FileRange {
    pub file_id: FileId,
    pub range: TextRange,
}

/// `InFile<T>` stores a value of `T` inside a particular file/syntax tree.
///
/// Typical usages are:
///
/// * `InFile<SyntaxNode>` -- syntax node in a file
/// * `InFile<ast::FnDef>` -- ast node in a file
/// * `InFile<TextSize>` -- offset in a file
#[derive(Debug, PartialEq, Eq, Clone, Copy, Hash)]
pub struct InFile<T> {
    pub file_id: FileId,
    pub value: T,
}

impl<T> InFile<T> {
    pub fn new(file_id: FileId, value: T) -> Self {
        Self { file_id, value }
    }

    pub fn with_value<U>(&self, value: U) -> InFile<U> {
        InFile::new(self.file_id, value)
    }

    pub fn as_ref(&self) -> InFile<&T> {
        self.with_value(&self.value)
    }

    pub fn borrow<U>(&self) -> InFile<&U>
    where
        T: Borrow<U>,
    {
        self.with_value(self.value.borrow())
    }

    pub fn unpack(self) -> (FileId, T) {
        let InFile { file_id, value } = self;
        (file_id, value)
    }

    pub fn unpack_ref(&self) -> (FileId, &T) {
        let InFile { file_id, value } = self;
        (*file_id, value)
    }

    pub fn map<F: FnOnce(T) -> U, U>(self, f: F) -> InFile<U> {
        InFile::new(self.file_id, f(self.value))
    }

    pub fn flat_map<Iter, F, U>(self, f: F) -> Vec<InFile<U>>
    where
        F: Fn(T) -> Iter,
        Iter: IntoIterator<Item = U>,
    {
        self.map(f).flatten()
    }

    pub fn map_ref<F: FnOnce(&T) -> U, U>(&self, f: F) -> InFile<U> {
        InFile::new(self.file_id, f(&self.value))
    }

    pub fn and_then<F: FnOnce(T) -> Option<U>, U>(self, f: F) -> Option<InFile<U>> {
        f(self.value).map(|value| InFile::new(self.file_id, value))
    }

    pub fn and_then_ref<F: FnOnce(&T) -> Option<U>, U>(&self, f: F) -> Option<InFile<U>> {
        f(&self.value).map(|value| InFile::new(self.file_id, value))
    }

    pub fn map_into<U: From<T>>(self) -> InFile<U> {
        self.map(|it| it.into())
    }
}

impl<T: AstNode> InFile<T> {
    pub fn kind(&self) -> SyntaxKind {
        self.value.syntax().kind()
    }

    #[inline]
    pub fn cast_into<IntoT: AstNode>(self) -> Option<InFile<IntoT>> {
        let InFile { file_id, value } = self;
        let value = IntoT::cast(value.syntax().clone())?;
        Some(InFile::new(file_id, value))
    }

    pub fn cast_into_ref<IntoT: AstNode>(&self) -> Option<InFile<IntoT>> {
        let InFile { file_id, value } = self;
        let value = IntoT::cast(value.syntax().clone())?;
        Some(InFile::new(*file_id, value))
    }

    pub fn file_range(&self) -> FileRange {
        FileRange {
            file_id: self.file_id,
            range: self.value.syntax().text_range(),
        }
    }
}

impl InFile<SyntaxNode> {
    pub fn syntax_cast<T: AstNode>(&self) -> Option<InFile<T>> {
        if T::can_cast(self.value.kind()) {
            let value = T::cast(self.value.clone()).expect("checked with can_cast()");
            Some(InFile { file_id: self.file_id, value })
        } else {
            None
        }
    }

    pub fn file_range(&self) -> FileRange {
        FileRange {
            file_id: self.file_id,
            range: self.value.text_range(),
        }
    }
}

impl<T, Iter: IntoIterator<Item = T>> InFile<Iter> {
    pub fn flatten(self) -> Vec<InFile<T>> {
        let (file_id, vec) = self.unpack();
        vec.into_iter().map(|it| it.in_file(file_id)).collect()
    }
}

impl<T: AstNode> InFile<T> {
    pub fn syntax(&self) -> InFile<SyntaxNode> {
        self.map_ref(|it| it.syntax().to_owned())
    }

    pub fn is_msl(&self) -> bool {
        self.value.syntax().is_msl_context()
    }

    pub fn syntax_text(&self) -> String {
        self.value.syntax().text().to_string()
    }
}

// pub trait InFileInto<U> {
//     fn in_file_into(self) -> InFile<U>;
// }

// impl<T> InFile<T> {
//     pub fn in_file_into<U: From<T>>(self) -> InFile<U> {
//         self.map(|it| it.into())
//     }
// }
// impl<T, U> InFileInto<U> for InFile<T>
// where
//     U: From<T>,
// {
//     fn in_file_into(self) -> InFile<U> {
//         self.map(|it| it.into())
//     }
// }

pub trait InFileExt {
    type Node;
    fn in_file(self, file_id: FileId) -> InFile<Self::Node>;
}

impl<T> InFileExt for T {
    type Node = T;
    fn in_file(self, file_id: FileId) -> InFile<T> {
        InFile::new(file_id, self)
    }
}

pub trait OptionInFileExt {
    type Node;
    fn opt_in_file(self, file_id: FileId) -> Option<InFile<Self::Node>>;
}

impl<T: AstNode> OptionInFileExt for Option<T> {
    type Node = T;
    fn opt_in_file(self, file_id: FileId) -> Option<InFile<T>> {
        let v = self?;
        Some(InFile::new(file_id, v))
    }
}
