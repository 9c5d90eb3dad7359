package zipkinproxy

import (
	"io"
	"net/http"
	"net/url"
)

func zzRequest(path string, header http.Header, body io.ReadCloser) *http.Request {
	return &http.Request{Method: "POST", URL: &url.URL{Path: path}, RequestURI: path, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: header, Body: body, Host: "localhost"}
}
