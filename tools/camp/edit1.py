TE='crates/ide-db/src/text_edit.rs'
OLD='''        for text_change in self.changes.iter().rev() {
            text_change.apply(text);
        }
'''

LIST=[
 dict(c='D03 L16 L17 D05',l='index rev',k='ok',e=[(TE,OLD,'''        for i in (0..self.changes.len()).rev() {
            self.changes[i].apply(text);
        }
''')]),
 dict(c='D03 L16 L17 D05',l='while idx',k='ok',e=[(TE,OLD,'''        let mut i = self.changes.len();
        while i > 0 {
            i -= 1;
            self.changes[i].apply(text);
        }
''')]),
 dict(c='D03 L16 L17 D05',l='for_each',k='ok',e=[(TE,OLD,'''        self.changes.iter().rev().for_each(|text_change| text_change.apply(text));
''')]),
 dict(c='D03 L16 L17 D05',l='next_back',k='ok',e=[(TE,OLD,'''        let mut it = self.changes.iter();
        while let Some(text_change) = it.next_back() {
            text_change.apply(text);
        }
''')]),
 dict(c='D03 L16 L17 D05',l='loop helper',k='ok',e=[(TE,OLD,'''        self.apply_from_end(text);
'''),(TE,'    pub fn union(&mut self','''    fn apply_from_end(&self, text: &mut String) {
        self.changes.iter().rev().for_each(|it| it.apply(text));
    }

    pub fn union(&mut self''')]),
 dict(c='D03 L16 L17 D05',l='bug forward index',k='bug',e=[(TE,OLD,'''        for i in 0..self.changes.len() {
            self.changes[i].apply(text);
        }
''')]),
 dict(c='D03 L16 L17 D05',l='bug skip first',k='bug',e=[(TE,OLD,'''        for i in (1..self.changes.len()).rev() {
            self.changes[i].apply(text);
        }
''')]),
]
