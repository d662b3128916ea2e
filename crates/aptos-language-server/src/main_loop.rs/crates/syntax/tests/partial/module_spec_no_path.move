spec {
    spec {

    }
}