void reg_locks(); void reg_atomics(); void reg_store(); void reg_alloc(); void reg_dump(); void reg_shm(); void reg_index();
void register_checks() { reg_locks(); reg_atomics(); reg_store(); reg_alloc(); reg_dump(); reg_shm(); reg_index(); }
