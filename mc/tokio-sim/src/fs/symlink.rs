use crate::fs::asyncify;

use std::io;
use std::path::Path;

pub async fn symlink(original: impl AsRef<Path>, link: impl AsRef<Path>) -> io::Result<()> {
    let original = original.as_ref().to_owned();
    let link = link.as_ref().to_owned();

    asyncify(move || std::os::unix::fs::symlink(original, link)).await
}
