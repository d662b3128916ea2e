module 0x1::addresses {
    fun main() {
        @0x0;
        @0x0000;
        @0x89b9f9d1fadc027cf9532d6f9904152289b9f9d1fadc027cf9532d6f99041522;

        @std;
        @aptos_framework;
    }
}
