addr {}
add {}
mod {}
