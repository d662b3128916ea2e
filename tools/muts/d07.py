import sys,os
sys.path.insert(0,'/verif/tools')
from mut import run
T='crates/lang/src/types/'
def m(f,o,n,l,k='bug'): run('D07',[(T+f,o,n)],l,k)
U='unification.rs'; C='inference/combine_types.rs'
m(U,'        if left_root_var == right_root_var {\n            // already unified\n            return;\n        }\n','','no same check (link overwritten)','ok')
m(U,'        if left_root_var == right_root_var {','        if left_var == right_var {','compares vars not roots (link overwritten)','ok')
m(U,'_ => left_value_ty.or(right_value_ty),','_ => right_value_ty,','left value lost')
m(U,'.insert(left_root_var, TableValue::Var(right_root_var.clone()));','.insert(left_var.clone(), TableValue::Var(right_root_var.clone()));','links var not root')
m(U,'        let root_var = self.resolve_to_root_var(ty_var);\n        self.mapping.insert(root_var, TableValue::Value(Some(ty)));','        self.mapping.insert(ty_var.clone(), TableValue::Value(Some(ty)));','binds var not root')
m(U,'        while let Some(TableValue::Var(root_var)) = self.mapping.get(var) {\n            var = root_var;\n        }','        if let Some(TableValue::Var(root_var)) = self.mapping.get(var) {\n            var = root_var;\n        }','one hop')
m(U,'self.snapshots.push(self.mapping.clone());','self.snapshots.push(self.mapping.clone());\n        self.mapping.clear();','snapshot clears')
m(U,'let last_snapshot = self.snapshots.pop().expect("inconsistent snapshot rollback");','let last_snapshot = self.snapshots.remove(0);','rollback first')
m(U,'self.mapping.get(&root_var).and_then','self.mapping.get(var).and_then','value at var')
m('inference.rs','        self.int_table.rollback();\n','','int rollback lost')
m('inference.rs','        let res = f(self);\n        self.var_table.rollback();','        self.var_table.rollback();\n        let res = f(self);','f after rollback')
m(C,'self.freeze(|ctx| ctx.combine_types(ty, into_ty).is_ok())','self.combine_types(ty, into_ty).is_ok()','not frozen')
m(C,'        let expected_ty = self.resolve_ty_infer_shallow(expected_ty);\n','','expected not looked up')
m(C,'                if self.ty_contains_ty_var(&ty, &root_ty_var) {','                if self.ty_contains_ty_var(&ty, var) {','occurs with var') 
m(C,'''                if self.ty_contains_ty_var(&ty, &root_ty_var) {
                    // "E0308 cyclic type of infinite size"
                    self.var_table.unify_var_value(&root_ty_var, Ty::Unknown);
                    return Ok(());
                }
''','','no occurs')
m(C,'&self.var_table.resolve_to_root_var(&inner_ty_var) == ty_var','inner_ty_var == ty_var','occurs no root')
m(C,'            let ty = self.resolve_ty_vars_if_possible(ty);\n            ty.deep','            ty.deep','unknown stale (fix 1 reverted)')
m(C,'        let ty = self.resolve_ty_vars_if_possible(ty.to_owned());\n        ty.deep','        ty.deep','occurs shallow (fix 2 reverted)')
m(C,'Ty::Integer(_) => self.int_table.unify_var_value(&int_var, ty),','Ty::Integer(_) | Ty::Num => self.int_table.unify_var_value(&int_var, ty),','int num')
m('inference.rs','''                    Some(Ty::Infer(TyInfer::IntVar(int_var))) => self
                        .int_table
                        .resolve_to_ty_value(int_var)
                        .unwrap_or(var_value_ty.unwrap()),
''','','int in var not looked up')
# benign
m(U,'''        let new_value_ty = match (&left_value_ty, &right_value_ty) {
            (Some(left_ty), Some(right_ty)) => {
                if *left_ty != *right_ty {
                    panic!("unification error: if both vars are unified, their ty's must be the same")
                }
                Some(left_ty.to_owned())
            }
            _ => left_value_ty.or(right_value_ty),
        };''','''        if let (Some(left_ty), Some(right_ty)) = (&left_value_ty, &right_value_ty) {
            assert!(left_ty == right_ty, "unification error");
        }
        let new_value_ty = match left_value_ty {
            Some(ty) => Some(ty),
            None => right_value_ty,
        };''','value match','ok')
m(U,'''        self.mapping
            .insert(left_root_var, TableValue::Var(right_root_var.clone()));
        self.mapping
            .insert(right_root_var, TableValue::Value(new_value_ty));''','''        let new_value = TableValue::Value(new_value_ty);
        self.mapping.insert(right_root_var.clone(), new_value);
        self.mapping.insert(left_root_var, TableValue::Var(right_root_var));''','insert order','ok')
m(U,'''        let mut var = var;
        while let Some(TableValue::Var(root_var)) = self.mapping.get(var) {
            var = root_var;
        }
        var.to_owned()''','''        let mut current = var;
        loop {
            match self.mapping.get(current) {
                Some(TableValue::Var(next)) => current = next,
                _ => break,
            }
        }
        current.clone()''','loop match','ok')
m(U,'''        let old_value_ty = self.resolve_to_ty_value(ty_var);
        if let Some(old_value_ty) = old_value_ty {
            // if already unified, value must be the same
            if old_value_ty != ty {
                panic!("unification error, {old_value_ty:?} != {ty:?}")
            }
            return;
        }
        let root_var = self.resolve_to_root_var(ty_var);
        self.mapping.insert(root_var, TableValue::Value(Some(ty)));''','''        match self.resolve_to_ty_value(ty_var) {
            Some(old_value_ty) => {
                if old_value_ty != ty {
                    panic!("unification error, {old_value_ty:?} != {ty:?}")
                }
            }
            None => {
                let root_var = self.resolve_to_root_var(ty_var);
                self.mapping.insert(root_var, TableValue::Value(Some(ty)));
            }
        }''','value match','ok')
m(C,'''                let root_ty_var = self.var_table.resolve_to_root_var(var);
                if self.ty_contains_ty_var(&ty, &root_ty_var) {
                    // "E0308 cyclic type of infinite size"
                    self.var_table.unify_var_value(&root_ty_var, Ty::Unknown);
                    return Ok(());
                }
                self.var_table.unify_var_value(&root_ty_var, ty);''','''                let root_ty_var = self.var_table.resolve_to_root_var(var);
                let is_cyclic = self.ty_contains_ty_var(&ty, &root_ty_var);
                let value_ty = if is_cyclic { Ty::Unknown } else { ty };
                self.var_table.unify_var_value(&root_ty_var, value_ty);
                if is_cyclic {
                    return Ok(());
                }''','value var','ok')
m(C,'''        match (expected_ty, actual_ty) {
            (Ty::Infer(TyInfer::Var(ty_var)), right_ty) => self.unify_ty_var(&ty_var, right_ty),
            (left_ty, Ty::Infer(TyInfer::Var(ty_var))) => self.unify_ty_var(&ty_var, left_ty),
''','''        if let Ty::Infer(TyInfer::Var(ty_var)) = &expected_ty {
            return self.unify_ty_var(ty_var, actual_ty);
        }
        match (expected_ty, actual_ty) {
            (left_ty, Ty::Infer(TyInfer::Var(ty_var))) => self.unify_ty_var(&ty_var, left_ty),
''','if let first','ok')
m('inference.rs','''        self.var_table.snapshot();
        self.int_table.snapshot();
        let res = f(self);
        self.var_table.rollback();
        self.int_table.rollback();
        res''','''        self.int_table.snapshot();
        self.var_table.snapshot();
        let result = f(self);
        self.int_table.rollback();
        self.var_table.rollback();
        result''','freeze order','ok')
