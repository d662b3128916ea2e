module 0x1::Module {
    public fun call() {}
               //X
}    
spec 0x1::Module {
    spec call {}
        //^
}