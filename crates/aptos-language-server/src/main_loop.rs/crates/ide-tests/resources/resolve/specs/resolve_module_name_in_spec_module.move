module 0x1::Module {
            //X        
}    
spec 0x1::Module {
            //^
}