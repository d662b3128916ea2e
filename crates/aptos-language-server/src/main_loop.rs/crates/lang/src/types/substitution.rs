// Copyright © Aptos Foundation
// SPDX-License-Identifier: Apache-2.0

// This file contains code originally from rust-analyzer, licensed under Apache License 2.0.
// Modifications have been made to the original code.

use crate::types::fold::{TypeFoldable, TypeFolder, TypeVisitor};
use crate::types::ty::Ty;
use crate::types::ty::type_param::TyTypeParameter;
use std::collections::HashMap;

#[derive(Debug, Clone, Eq, PartialEq, Default)]
pub struct Substitution {
    mapping: HashMap<TyTypeParameter, Ty>,
}

impl Substitution {
    pub fn new(mapping: HashMap<TyTypeParameter, Ty>) -> Self {
        Substitution { mapping }
    }

    pub fn get_ty(&self, ty_tp: &TyTypeParameter) -> Option<Ty> {
        self.mapping.get(ty_tp).map(|it| it.to_owned())
    }

    pub fn entries(&self) -> impl Iterator<Item = (&TyTypeParameter, &Ty)> {
        self.mapping.iter()
    }
}

pub fn empty_substitution() -> Substitution {
    Substitution::default()
}

impl TypeFoldable<Substitution> for Substitution {
    fn deep_fold_with(self, folder: &impl TypeFolder) -> Substitution {
        let folded_mapping = self
            .mapping
            .into_iter()
            .map(|(k, v)| (k, v.fold_with(folder)))
            .collect();
        Substitution { mapping: folded_mapping }
    }

    fn deep_visit_with(&self, visitor: impl TypeVisitor) -> bool {
        self.mapping.values().any(|it| it.visit_with(visitor.clone()))
    }
}

pub trait ApplySubstitution {
    type Item: TypeFoldable<Self::Item>;

    fn substitute(self, subst: &Substitution) -> Self::Item;
}

#[derive(Debug, Clone)]
pub struct SubstitutionApplier<'a> {
    subst: &'a Substitution,
}

impl TypeFolder for SubstitutionApplier<'_> {
    fn fold_ty(&self, ty: Ty) -> Ty {
        match ty {
            Ty::TypeParam(ty_tp) => self.subst.get_ty(&ty_tp).unwrap_or(Ty::TypeParam(ty_tp)),
            _ => ty.deep_fold_with(self),
        }
    }
}

impl<T: TypeFoldable<T>> ApplySubstitution for T {
    type Item = T;

    fn substitute(self, subst: &Substitution) -> T {
        self.fold_with(&SubstitutionApplier { subst })
    }
}
