//@deps bincode
use crate::bincode;
//@file xdvdfs-core/src/write/mod.rs
//@item enum FileStructureError
