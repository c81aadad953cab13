void reg_locks();
void register_checks() { reg_locks(); }
