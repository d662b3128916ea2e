import sys; sys.path.insert(0,'..'); sys.path.insert(0,'.')
from mut import run
R='crates/aptos-language-server/src/handlers/request.rs'; T='crates/aptos-language-server/src/lsp/to_proto.rs'; I='crates/ide/src/lib.rs'
B,G='bug','ok'
run('D01',[(R,"        .map(|frange| to_proto::location(&snap, frange))\n        .collect::<Cancellable<Vec<_>>>()?;","        .filter_map(|frange| to_proto::location(&snap, frange).ok())\n        .collect();")],'orig refs',B)
run('D01',[(R,"        .map(|frange| to_proto::location(&snap, frange))\n        .collect::<Cancellable<Vec<_>>>()?;","        .flat_map(|frange| to_proto::location(&snap, frange))\n        .collect();")],'flat_map',B)
run('D01',[(R,"        .map(|frange| to_proto::location(&snap, frange))\n        .collect::<Cancellable<Vec<_>>>()?;","        .map(|frange| to_proto::location(&snap, frange))\n        .filter_map(Result::ok)\n        .collect();")],'filter_map(ok)',B)
run('D01',[(R,"    let position = from_proto::file_position(&snap, params.text_document_position_params)?;\n    let Some(refs)","    let Ok(position) = from_proto::file_position(&snap, params.text_document_position_params) else { return Ok(None) };\n    let Some(refs)")],'let else',B)
run('D01',[(R,"        .map(|frange| to_proto::location(&snap, frange))\n        .collect::<Cancellable<Vec<_>>>()?;","        .map(|frange| {\n            let loc = to_proto::location(&snap, frange)?;\n            Ok(loc)\n        })\n        .collect::<Cancellable<Vec<_>>>()?;")],'closure with ?',G)
run('D01',[(R,"        .map(|frange| to_proto::location(&snap, frange))\n        .collect::<Cancellable<Vec<_>>>()?;\n\n    Ok(Some(locations))",""" ;
    let mut out = vec![];
    for frange in locations {
        out.push(to_proto::location(&snap, frange)?);
    }
    Ok(Some(out))""")],'loop',G)
run('D01',[(I,"        self.with_db(|db| hover::hover(db, pos))","        Ok(hover::hover(&self.db, pos))")],'hover direct',B)
run('D01',[(I,"        self.with_db(|db| hover::hover(db, pos))","        Ok(self.with_db(|db| hover::hover(db, pos)).unwrap_or_default())")],'hover default',B)
run('D01',[(I,"        Cancelled::catch(|| f(&self.db))","        let out = f(&self.db);\n        Cancelled::catch(|| out)")],'eval outside',B)
run('D01',[(I,"        Cancelled::catch(|| f(&self.db))","        let db = &self.db;\n        let res = Cancelled::catch(move || f(db));\n        res")],'vars',G)
