Q='crates/aptos-language-server/src/op_queue.rs'; O='crates/aptos-language-server/src/opened_files.rs'
RS='''#!/bin/bash
# compiles the real source file into a small program that drives it through every short history
here="$(cd "$(dirname "$0")" && pwd)"; repo="$(pwd)"
W="$(mktemp -d)"; trap 'rm -rf "$W"' EXIT
cp "$here/main.rs" "$W/main.rs"
cp "$repo/crates/aptos-language-server/src/op_queue.rs" "$W/op_queue.rs"
sed 's/use vfs::VfsPath;/use crate::VfsPath;/' "$repo/crates/aptos-language-server/src/opened_files.rs" > "$W/opened_files.rs"
rustc --edition 2021 -A warnings -o "$W/demo" "$W/main.rs" 2> "$W/err" || { cat "$W/err"; exit 99; }
timeout 60 "$W/demo"
'''
MAIN='''mod op_queue;
mod opened_files;
pub type VfsPath = String;
use op_queue::OpQueue;
use opened_files::{DocumentData, OpenedFiles};
fn main() {
    // every history of up to 7 steps of request / start / complete, against a reference
    for len in 1..=7u32 {
        for code in 0..3u32.pow(len) {
            let mut q: OpQueue<u32, u32> = OpQueue::default();
            let (mut req, mut busy, mut last): (Option<u32>, bool, Option<u32>) = (None, false, None);
            let mut c = code;
            for i in 0..len {
                match c % 3 {
                    0 => { q.request_op(format!("c{i}"), i); req = Some(i); }
                    1 => {
                        let got = q.should_start_op().map(|(_, a)| a);
                        let want = if busy { None } else { req.take() };
                        assert_eq!(got, want, "start, history {code} of {len}");
                        if want.is_some() { busy = true; }
                    }
                    _ => if busy { q.op_completed(i); busy = false; last = Some(i); }
                }
                assert_eq!(q.op_in_progress(), busy);
                assert_eq!(q.op_requested(), req.is_some());
                assert_eq!(q.last_op_result().copied(), last);
                c /= 3;
            }
        }
    }
    let mut o = OpenedFiles::default();
    let (a, b) = ("/a.move".to_string(), "/b.move".to_string());
    assert!(o.insert(a.clone(), DocumentData::new(1, b"one".to_vec())).is_ok());
    assert!(o.insert(b.clone(), DocumentData::new(5, b"b".to_vec())).is_ok());
    assert!(o.insert(a.clone(), DocumentData::new(1, b"again".to_vec())).is_err());
    assert_eq!(o.get(&a).unwrap().data, b"again", "reopened document keeps its old text");
    assert!(o.contains(&a) && o.contains(&b));
    assert!(o.remove(&a).is_ok());
    assert!(o.remove(&a).is_err());
    assert!(!o.contains(&a) && o.contains(&b));
    assert_eq!(o.get(&b).unwrap().version, 5);
}
'''
F={'demo.sh':RS,'main.rs':MAIN}
SEEDS=[
 dict(id='l07-request-while-running-lost',property='L07',edits=[(Q,'        self.op_in_progress = false;\n        self.last_op_result','        self.op_in_progress = false;\n        self.op_requested = None;\n        self.last_op_result')],
      needs='a load requested while another one runs',breaks='the request is forgotten when the running load ends: the workspace stays stale',files=F),
 dict(id='l07-take-before-busy-check',property='L07',edits=[(Q,'''        if self.op_in_progress {
            return None;
        }
        self.op_in_progress = self.op_requested.is_some();
        self.op_requested.take()''','''        let next = self.op_requested.take()?;
        if self.op_in_progress {
            return None;
        }
        self.op_in_progress = true;
        Some(next)''')],
      needs='the main loop turning once between a request and the end of the running load',breaks='the pending request is dropped by the turn that finds the queue busy',files=F),
 dict(id='l07-first-request-wins',property='L07',edits=[(Q,'self.op_requested = Some((cause, args));','self.op_requested.get_or_insert((cause, args));')],
      needs='two requests before the next start, the later one forcing a reload of the dependencies',breaks='the later request, and its flag, is ignored',files=F),
 dict(id='l06-reopen-keeps-old-text',property='L06',edits=[(O,'''        match self.files.insert(path, data) {
            Some(_) => Err(()),
            None => Ok(()),
        }''','''        match self.files.entry(path) {
            std::collections::hash_map::Entry::Occupied(_) => Err(()),
            std::collections::hash_map::Entry::Vacant(it) => {
                it.insert(data);
                Ok(())
            }
        }''')],
      needs='a client that opens a document twice without closing it',breaks='the server keeps working on the text of the first open',files=F),
]
