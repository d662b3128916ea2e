CP='crates/aptos-language-server/src/lsp/capabilities.rs'
SEEDS=[
 dict(id='l04-refresh-from-wrong-field',property='L04',libs=['caps'],files={},
  edits=[(CP,'self.0.workspace.as_ref()?.inlay_hint.as_ref()?.refresh_support','self.0.workspace.as_ref()?.diagnostics.as_ref()?.refresh_support')],
  needs='a client that supports one of refreshing inlay hints and refreshing diagnostics but not the other',
  breaks='the server asks a client to refresh inlay hints although it cannot, or never asks one that can'),
 dict(id='l04-encoding-by-position',property='L04',libs=['caps'],files={},
  edits=[(CP,'''            if enc == &PositionEncodingKind::UTF8 {
                return PositionEncoding::Utf8;
            } else if enc == &PositionEncodingKind::UTF32 {
                return PositionEncoding::Wide(WideEncoding::Utf32);
            }''','''            if enc == &PositionEncodingKind::UTF8 {
                return PositionEncoding::Utf8;
            } else if enc != &PositionEncodingKind::UTF16 {
                return PositionEncoding::Wide(WideEncoding::Utf32);
            }''')],
  needs='a client whose first offered encoding is neither UTF-8 nor UTF-16 nor UTF-32',
  breaks='the server works in UTF-32 although the client did not offer it, so every position after a non-BMP character is off'),
 dict(id='l04-wide-encoding-reported-as-utf16',property='L04',libs=['caps'],files={},
  edits=[(CP,'''                WideEncoding::Utf32 => Some(PositionEncodingKind::UTF32),
                _ => None,''','''                _ => None,''')],
  needs='a client that offers UTF-32 and not UTF-8',
  breaks='the server computes positions in UTF-32 while the answer to initialize leaves the client at the default UTF-16'),
 dict(id='l04-label-details-default-on',property='L04',libs=['caps'],files={},
  edits=[(CP,'''                .label_details_support
        })() == Some(true)''','''                .label_details_support
        })() != Some(false)''')],
  needs='a client that says nothing about label details of completions',
  breaks='label details are sent to a client that never said it takes them, so the parameter lists vanish from its completion list'),
]
