//! Stand-in for `biome_formatter` (whose sources are not available here):
//! only the attachment of comments to nodes.
pub mod comments;
