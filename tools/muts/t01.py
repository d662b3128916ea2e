S='crates/stdext/src/line_endings.rs'; P='crates/aptos-language-server/src/lsp/to_proto.rs'; GS='crates/aptos-language-server/src/global_state.rs'
B='bug'; G='ok'
run('T01',[(S,'memmem::Finder::new(b"\\r\\n")','memmem::Finder::new(b"\\n")')],'needle',B)
run('T01',[(S,'None if crlf_seen => tail.len(),','None if crlf_seen => gap_len.max(tail.len() - 1),')],'drops last',B)
run('T01',[(S,'finder.find(&tail[gap_len..])','finder.find(&tail[gap_len + 1..])')],'find skip',B)
run('T01',[(S,'gap_len += 1;','gap_len += 2;')],'gap2',B)
run('T01',[(S,'let new_len = buf.len() - gap_len;','let new_len = buf.len() - gap_len.min(2);')],'len min',B)
run('T01',[(S,'(src, LineEndings::Dos)\n','(src, LineEndings::Unix)\n')],'ending',B)
run('T01',[(S,'tail.copy_within(gap_len..idx, 0);','if gap_len > 1 { tail.copy_within(gap_len..idx, 0); }')],'copy skip gap1',B)
run('T01',[(S,'tail.copy_within(gap_len..idx, 0);','if gap_len > 0 { tail.copy_within(gap_len..idx, 0); }')],'copy skip gap0 ok',G)
run('T01',[(S,'LineEndings::Dos => text.replace(\'\\n\', "\\r\\n")','LineEndings::Dos => text.replacen(\'\\n\', "\\r\\n", 64)')],'replacen',B)
run('T01',[(S,'LineEndings::Dos => text.replace(\'\\n\', "\\r\\n")','LineEndings::Dos => text.replace("\\n", "\\r\\n")')],'replace str',G)
run('T01',[(S,'''        match self {
            LineEndings::Unix => text,
            LineEndings::Dos => text.replace('\\n', "\\r\\n"),
        }''','''        if *self == LineEndings::Dos {
            return text.replace('\\n', "\\r\\n");
        }
        text''')],'map if',G)
run('T01',[(S,'''        match self {
            LineEndings::Unix => text,''','''        match self {
            _ if !text.contains('\\r') && text.len() < 2 => text,
            LineEndings::Unix => text,''')],'map short text',B)
run('T01',[(P,'line_index.endings.map(change.new_text)','change.new_text')],'edit raw',B)
run('T01',[(GS,'let endings = self.vfs.read().1[&file_id];','let endings = stdext::line_endings::LineEndings::Unix;')],'index unix',B)
run('T01',[(S,'''        loop {
            let idx = match finder.find(&tail[gap_len..]) {
                None if crlf_seen => tail.len(),
                // SAFETY: buf is unchanged and therefore still contains utf8 data
                None => return (unsafe { String::from_utf8_unchecked(buf) }, LineEndings::Unix),
                Some(idx) => {
                    crlf_seen = true;
                    idx + gap_len
                }
            };
            tail.copy_within(gap_len..idx, 0);
            tail = &mut tail[idx - gap_len..];
            if tail.len() == gap_len {
                break;
            }
            gap_len += 1;
        }
''','''        while let Some(found) = finder.find(&tail[gap_len..]) {
            crlf_seen = true;
            tail.copy_within(gap_len..gap_len + found, 0);
            tail = &mut tail[found..];
            gap_len += 1;
        }
        if !crlf_seen {
            return (unsafe { String::from_utf8_unchecked(buf) }, LineEndings::Unix);
        }
        let end = tail.len();
        tail.copy_within(gap_len..end, 0);
''')],'loop rewritten',G)
run('T01',[(S,'''        loop {
            let idx = match finder.find(&tail[gap_len..]) {
                None if crlf_seen => tail.len(),
                // SAFETY: buf is unchanged and therefore still contains utf8 data
                None => return (unsafe { String::from_utf8_unchecked(buf) }, LineEndings::Unix),
                Some(idx) => {
                    crlf_seen = true;
                    idx + gap_len
                }
            };''','''        loop {
            let next = finder.find(&tail[gap_len..]);
            if next.is_none() && !crlf_seen {
                return (unsafe { String::from_utf8_unchecked(buf) }, LineEndings::Unix);
            }
            crlf_seen = true;
            let idx = next.map_or(tail.len(), |i| i + gap_len);''')],'map_or',G)
run('T01',[(S,'''        let mut buf = src.into_bytes();
        let mut gap_len = 0;
        let mut tail = buf.as_mut_slice();
        let mut crlf_seen = false;
''','''        if !src.contains("\\r\\n") {
            return (src, LineEndings::Unix);
        }
        return (src.replace("\\r\\n", "\\n"), LineEndings::Dos);
        let mut buf = src.into_bytes();
        let mut gap_len = 0;
        let mut tail = buf.as_mut_slice();
        let mut crlf_seen = false;
''')],'replace form',G)
run('T01',[(S,'''            tail.copy_within(gap_len..idx, 0);
            tail = &mut tail[idx - gap_len..];''','''            tail = shift(tail, gap_len, idx);'''),(S,'#[cfg(test)]\nmod tests','''fn shift(tail: &mut [u8], gap: usize, end: usize) -> &mut [u8] {
    tail.copy_within(gap..end, 0);
    &mut tail[end - gap..]
}

#[cfg(test)]
mod tests''')],'helper',G)
