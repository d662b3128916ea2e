import sys,os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'))
from mut import run
T='crates/lang/src/types/'
def m(f,o,n,l,k='bug'): run('D08',[(T+f,o,n)],l,k)
m('ty/ty_callable.rs','            kind.fold_with(folder),','            kind,','callable kind not folded')
m('ty/ty_callable.rs','            folder.fold_tys(param_types),','            param_types,','params not folded')
m('ty/ty_callable.rs','            || self.kind.visit_with(visitor)','','kind not visited')
m('ty/ty_callable.rs','subst.visit_with(visitor),\n','{ let _ = (subst, visitor); false }\n','named subst not visited')
m('ty/schema.rs','self.substitution.deep_fold_with(folder)','self.substitution','schema subst not folded')
m('ty.rs','            Ty::Schema(ty_schema) => Ty::Schema(ty_schema.deep_fold_with(folder)),\n','','schema arm lost')
m('ty.rs','            Ty::Tuple(ty_tuple) => ty_tuple.deep_visit_with(visitor),\n','','tuple visit arm lost')
m('ty/reference.rs','folder.fold_ty(self.referenced())','self.referenced().deep_fold_with(folder)','reference folds below')
m('ty/range_like.rs','TySequence::Range(Box::new(folder.fold_ty(item_ty)))','TySequence::Vector(Box::new(folder.fold_ty(item_ty)))','range to vector')
m('ty/adt.rs','self.substitution.deep_visit_with(visitor.clone()) || visitor.visit_tys(&self.type_args)','visitor.visit_tys(&self.type_args)','adt subst not visited')
m('ty/adt.rs','self.substitution.deep_visit_with(visitor.clone()) || visitor','self.substitution.deep_visit_with(visitor.clone()) && visitor','or to and')
m('substitution.rs','.map(|(k, v)| (k, v.fold_with(folder)))','.map(|(k, v)| (k, v.deep_fold_with(folder)))','subst deep')
m('substitution.rs','.values().any(','.values().all(','any->all')
m('substitution.rs','_ => ty.deep_fold_with(self),','Ty::Infer(_) => ty,\n            Ty::Callable(_) => ty,\n            _ => ty.deep_fold_with(self),','applier skips callables')
m('substitution.rs','self.subst.get_ty(&ty_tp).unwrap_or(Ty::TypeParam(ty_tp))','self.subst.get_ty(&ty_tp).unwrap_or(Ty::Unknown)','missing param unknown')
m('substitution.rs','self.fold_with(&SubstitutionApplier','self.deep_fold_with(&SubstitutionApplier','substitute deep')
m('fold.rs','            res_ty = self.ctx.resolve_ty_infer(&ty_infer);\n        }\n        res_ty.deep_fold_with(self)','            return self.ctx.resolve_ty_infer(&ty_infer);\n        }\n        res_ty.deep_fold_with(self)','resolver shallow')
m('fold.rs','                    _ => Ty::Unknown,\n                },\n                _ => resolved_ty,\n            };\n        }\n        res_ty.deep_fold_with(self)','                    _ => Ty::Unknown,\n                },\n                _ => return resolved_ty,\n            };\n        }\n        res_ty.deep_fold_with(self)','full resolver shallow')
m('fold.rs','acc || self.visit_ty(t)','self.visit_ty(t)','visit_tys last only')
m('fold.rs','                    _ => Ty::Unknown,\n                },','                    _ => Ty::Infer(TyInfer::Var(ty_var)),\n                },','var left')
m('inference/combine_types.rs','                left_ty: left_ty.fold_with(folder),','                left_ty,','error left ty')
m('fold.rs','            Ty::TypeParam(_) => true,','            Ty::TypeParam(_) => true,\n            Ty::Reference(_) => false,','visitor skips refs')
# benign
m('ty/adt.rs','''        TyAdt {
            adt_item_loc: self.adt_item_loc,
            substitution: self.substitution.deep_fold_with(folder),
            type_args: folder.fold_tys(self.type_args),
        }''','''        let TyAdt { adt_item_loc, substitution, type_args } = self;
        let type_args = type_args.into_iter().map(|it| it.fold_with(folder)).collect();
        let substitution = substitution.fold_with(folder);
        TyAdt { adt_item_loc, substitution, type_args }''','adt destructured','ok')
m('ty/ty_callable.rs','''        visitor.visit_tys(&self.param_types)
            || visitor.visit_ty(&self.ret_type)
            || self.kind.visit_with(visitor)''','''        for ty in &self.param_types {
            if visitor.visit_ty(ty) {
                return true;
            }
        }
        self.kind.visit_with(visitor.clone()) || visitor.visit_ty(&self.ret_type)''','callable loop','ok')
m('fold.rs','tys.iter().fold(false, |acc, t| acc || self.visit_ty(t))','tys.iter().any(|t| self.visit_ty(t))','any','ok')
m('fold.rs','''        let mut res_ty = t.clone();
        if let Ty::Infer(ty_infer) = t {
            res_ty = self.ctx.resolve_ty_infer(&ty_infer);
        }
        res_ty.deep_fold_with(self)''','''        let res_ty = match t {
            Ty::Infer(ty_infer) => self.ctx.resolve_ty_infer(&ty_infer),
            other => other,
        };
        res_ty.deep_fold_with(self)''','resolver match','ok')
m('substitution.rs','self.mapping.values().any(|it| it.visit_with(visitor.clone()))','self.mapping.iter().any(|(_, ty)| ty.visit_with(visitor.clone()))','iter any','ok')
m('substitution.rs','''        let folded_mapping = self
            .mapping
            .into_iter()
            .map(|(k, v)| (k, v.fold_with(folder)))
            .collect();
        Substitution { mapping: folded_mapping }''','''        let mut folded = HashMap::new();
        for (param, ty) in self.mapping {
            folded.insert(param, ty.fold_with(folder));
        }
        Substitution { mapping: folded }''','loop insert','ok')
m('ty/range_like.rs','''            TySequence::Vector(item_ty) => {
                let item_ty = item_ty.deref().to_owned();
                TySequence::Vector(Box::new(folder.fold_ty(item_ty)))
            }''','''            TySequence::Vector(item_ty) => TySequence::Vector(Box::new(folder.fold_ty(*item_ty))),''','vector deref','ok')
