package ioutil
