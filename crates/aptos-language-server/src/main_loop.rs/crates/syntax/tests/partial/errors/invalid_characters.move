керкер
