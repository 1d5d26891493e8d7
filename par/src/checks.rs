#[path = "../../harness/src/checks/robust.rs"]
pub mod robust;
#[path = "../../harness/src/checks/c20.rs"]
pub mod c20;
#[path = "../../harness/src/checks/c06.rs"]
pub mod c06;
