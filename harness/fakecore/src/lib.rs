//! swc_core with the host side of the plugin interface (file name, configuration, source map and
//! comments, which a wasm plugin asks its host for) replaced by values the harness gives.
pub use real_core::*;
pub mod plugin {
    pub use plugmac::plugin_transform;
    pub mod metadata {
        pub use super::proxies::TransformPluginProgramMetadata;
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub enum TransformPluginMetadataContextKind { Filename, Env, Cwd }
    }
    pub mod proxies {
        use real_core::common::{comments::SingleThreadedComments, source_map::*, sync::Lrc, *};
        #[derive(Clone)]
        pub struct PluginSourceMapProxy(pub std::sync::Arc<SourceMap>);
        pub type PluginCommentsProxy = SingleThreadedComments;
        pub struct TransformPluginProgramMetadata {
            pub comments: Option<PluginCommentsProxy>,
            pub source_map: PluginSourceMapProxy,
            pub unresolved_mark: Mark,
            pub filename: Option<String>,
            pub config: Option<String>,
        }
        impl TransformPluginProgramMetadata {
            pub fn get_transform_plugin_config(&self) -> Option<String> { self.config.clone() }
            pub fn get_context(&self, k: &super::metadata::TransformPluginMetadataContextKind) -> Option<String> {
                use super::metadata::TransformPluginMetadataContextKind as K;
                match k { K::Filename => self.filename.clone(), K::Env => Some("development".into()), K::Cwd => Some("/cwd".into()) }
            }
            pub fn get_experimental_context(&self, _: &str) -> Option<String> { None }
        }
        impl SourceMapper for PluginSourceMapProxy {
            fn lookup_char_pos(&self, pos: BytePos) -> Loc { self.0.lookup_char_pos(pos) }
            fn span_to_lines(&self, sp: Span) -> FileLinesResult { self.0.span_to_lines(sp) }
            fn span_to_string(&self, sp: Span) -> String { self.0.span_to_string(sp) }
            fn span_to_filename(&self, sp: Span) -> Lrc<FileName> { self.0.span_to_filename(sp) }
            fn merge_spans(&self, a: Span, b: Span) -> Option<Span> { self.0.merge_spans(a, b) }
            fn call_span_if_macro(&self, sp: Span) -> Span { sp }
            fn doctest_offset_line(&self, line: usize) -> usize { line }
            fn span_to_snippet(&self, sp: Span) -> Result<String, Box<SpanSnippetError>> { self.0.span_to_snippet(sp) }
        }
    }
}
